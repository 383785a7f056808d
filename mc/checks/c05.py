"""C05: the Hessian of a model is its exact second derivative."""
import numpy as np
import sympy

from ..env import symfit
from .. import gen
from .c04 import build, evaluate, compare, superset
from symfit import Model
from symfit.core.models import HessianModel


def hessian(ch, dev=True, **forms):
    forms = forms or dict(z=gen.Z_FORMS, u=gen.U_FORMS, v=gen.V_FORMS)
    am, syms, model, data, point = build(ch, dev=dev, classes=[Model, HessianModel], **forms)
    before = ch.pick('before', ['nothing', 'call', 'jacobian', 'hessian', 'text'])
    vals = dict(data, **point)
    other = {k: v + 0.5 for k, v in vals.items()}
    if before == 'call':
        model(**other)
    elif before == 'jacobian':
        model.eval_jacobian(**other)
    elif before == 'hessian':
        model.eval_hessian(**other)
    elif before == 'text':
        str(model), model.hessian
    ref = am.ref1(data, point)
    out = evaluate(ch, model.eval_hessian, am, data, point)
    compare(ch, out, am, ref, 'h', 'Hessian')
    for h in out:
        ch.close(h, np.swapaxes(h, 0, 1), 'symmetry', 'the Hessian is symmetric')
    ch.obs(am.components, {k: np.round(r.h, 7) for k, r in ref.items()})


def chains(ch):
    """All models of up to three components."""
    hessian(ch, dev=False, names=gen.NAMES[1:2], z=gen.Z_FORMS, u=gen.U_FORMS)


def long_chains(ch):
    """All models of up to four components; the rest within the bound."""
    hessian(ch, dev=False, z=gen.Z_FORMS, u=gen.U_FORMS, v=gen.V_FORMS)


def functions(ch):
    """Branches, powers with parameters as exponent and other functions."""
    hessian(ch, y=gen.W_FORMS, z=gen.WZ_FORMS, u=gen.WU_FORMS)


def symbolic(ch):
    f = ch.pick('form', gen.Y_FORMS, dev=False)
    g = ch.pick('second', [None] + [z for z in gen.Z_FORMS[1:] if 'y' not in z.syms], dev=False)
    pt = ch.pick('point', gen.POINTS, dev=False)
    am = gen.AM([f] + ([g] if g else []))
    if not am.params:
        ch.pick('no parameters', [])
    syms = am.symbols()
    model = Model(am.model_dict(syms))
    vals = dict(gen.at(am, gen.XS[1][1]), **gen.at(am, pt[1]))
    subs = {syms[n]: v for n, v in vals.items()}
    ref = am.ref(gen.at(am, gen.XS[1][1]), gen.at(am, pt[1]))
    ch.op()
    for i, n in enumerate(am.components):
        for j, p in enumerate(am.params):
            for k, q in enumerate(am.params):
                ch.close(float(sympy.sympify(model.hessian[i][j][k]).subs(subs)), ref[n].h[j, k],
                         'symbolic Hessian', 'entry of model.hessian', atol=1e-9)
    ch.obs(f.name, g and g.name, {n: np.round(r.h, 7) for n, r in ref.items()})


def only_hessian(ch):
    return superset(ch)


def spec(tier):
    t = tier == 'thorough'
    return {
        'bodies': {
            'hessian': {'body': hessian, 'bound': 4 if t else 2},
            'chains': {'body': long_chains if t else chains, 'bound': 0},
            'functions': {'body': functions, 'bound': 4 if t else 2},
            'superset': {'body': only_hessian, 'bound': 4 if t else 2},
            'symbolic': {'body': symbolic},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'all models of at most four components from the grammar of '
                'formulas, times renamings, orders, argument shapes, parameter '
                'points (zero and negative included), what was evaluated before '
                'and calling style; an outcome is the tuple of reference Hessians',
        'assumptions': ['reference derivatives come from second order jets in numpy'],
    }
