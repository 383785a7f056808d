"""C02: calling a model evaluates its expressions."""
import itertools

import numpy as np
import sympy

from ..env import symfit
from .. import gen
from symfit import Model, CallableModel, variables
from symfit.core.models import GradientModel, ModelOutput

CLASSES = [Model, CallableModel, GradientModel]


def call(ch, model, am, data, point):
    """Every documented way of passing the same arguments."""
    names = am.indep + am.params
    vals = dict(data, **point)
    style = ch.pick('call', ['keyword', 'positional', 'mixed', 'shuffled keywords'])
    ch.op()
    if style == 'positional':
        return model(*[vals[n] for n in names])
    if style == 'mixed':
        k = (len(names) + 1) // 2
        return model(*[vals[n] for n in names[:k]],
                     **{n: vals[n] for n in names[k:]})
    if style == 'shuffled keywords':
        return model(**{n: vals[n] for n in names[::-1]})
    return model(**{n: vals[n] for n in names})


def make(thorough):
    def functions(ch):
        return values(ch, y=gen.W_FORMS, z=gen.WZ_FORMS, u=gen.WU_FORMS)

    def values(ch, **forms):
        am = gen.pick_model(ch, **(forms or dict(z=gen.Z_FORMS, u=gen.U_FORMS, v=gen.V_FORMS)))
        order = ch.pick('definition order', gen.orders(am))
        xs = ch.pick('x', gen.XS)
        pt = ch.pick('point', gen.POINTS)
        cls = ch.pick('class', CLASSES)
        data, point = gen.at(am, xs[1]), gen.at(am, pt[1])
        syms = am.symbols()
        model = cls(am.model_dict(syms, order))
        ref = {k: j.v for k, j in am.ref1(data, point).items()}
        before = {k: np.array(v, copy=True) for k, v in data.items()}
        out = call(ch, model, am, data, point)
        ch.expect(len(out) == len(am.components), 'length', 'one output per component')
        for i, n in enumerate(am.components):
            ch.close(out[i], ref[n], 'value', 'component by position', atol=1e-12)
            ch.close(getattr(out, n), ref[n], 'attribute', 'component by attribute', atol=1e-12)
            ch.close(out._asdict()[syms[n]], ref[n], 'dict', 'component by key', atol=1e-12)
        for v, n in zip(out, am.components):
            ch.close(v, ref[n], 'iteration', 'component by iteration', atol=1e-12)
        ch.equal([v.name for v in out._asdict()], am.components, 'keys', 'alphabetical keys')
        ch.equal([v.name for v in out.variables], am.components, 'variables', 'variables')
        for k in data:
            ch.equal(np.array_equal(data[k], before[k]), True, 'input changed', 'input untouched')
        ch.obs(am.components, {k: np.round(v, 9) for k, v in ref.items()})
        # Refused calls
        names = am.indep + am.params
        vals = dict(data, **point)
        ch.raises(TypeError, lambda: model(**{n: vals[n] for n in names[1:]}),
                  'missing argument', 'a missing argument')
        ch.raises(TypeError, lambda: model(*([1.0] * (len(names) + 1))),
                  'surplus argument', 'a surplus argument')
        ch.raises(TypeError, lambda: model(not_a_name=1.0, **vals),
                  'unknown argument', 'an unknown argument')
        # The components are the expressions that were given
        for n in am.components:
            ch.expect(syms[n] in model and model[syms[n]] == am.model_dict(syms)[syms[n]],
                      'mapping', 'model[y] is the expression of y')
        ch.equal(len(model), len(am.components), 'len', 'number of components')
        ch.equal([v.name for v in model], am.components, 'iter', 'iteration order')

    def unnamed(ch):
        """A single expression or a sequence of expressions, without names."""
        f = ch.pick('form', gen.Y_FORMS, dev=False)
        g = ch.pick('second', [None] + gen.Y_FORMS[:4], dev=False)
        xs = ch.pick('x', gen.XS[:4], dev=False)
        kind = ch.pick('given as', ['expression', 'list', 'tuple'], dev=False)
        if kind == 'expression' and g is not None:
            ch.pick('none', [])
        am = gen.AM([f])
        ams = [am] + ([gen.AM([g])] if g is not None else [])
        syms = {}
        for m in ams:
            syms.update(m.symbols())
        exprs = [list(m.model_dict(syms).values())[0] for m in ams]
        model = Model(exprs[0] if kind == 'expression' else
                      (list(exprs) if kind == 'list' else tuple(exprs)))
        names = (sorted(set(n for m in ams for n in m.indep)) +
                 sorted(set(n for m in ams for n in m.params)))
        vals = dict(xs[1], **gen.POINTS[0][1])
        out = model(*[vals[n] for n in names])
        ch.op()
        refs = []
        for m in ams:
            r = m.ref1(gen.at(m, vals), gen.at(m, vals))
            refs.append(r['y'].v)
        # Names are generated: the set of values must agree
        ch.equal(len(out), len({str(e) for e in exprs}) if False else len(model), 'len', 'length')
        for var, expr in model.items():
            for e, r in zip(exprs, refs):
                if e == expr:
                    ch.close(out._asdict()[var], r, 'unnamed value', 'value of an unnamed component')
        ch.expect(all(any(e == x for x in model.values()) for e in exprs),
                  'unnamed kept', 'every expression is in the model')
        ch.obs(str(f.name), str(kind), refs)

    def output(ch):
        """ModelOutput as a container."""
        n = ch.pick('components', [1, 2, 3], dev=False)
        kind = ch.pick('kind', ['float', 'array', 'ragged'], dev=False)
        perm = ch.pick('order', list(itertools.permutations(range(n))), dev=False)
        vs = [gen.Variable(k) for k in ('y', 'z', 'u')[:n]]
        vals = {'float': [1.0, 2.0, 3.0], 'array': [np.arange(3.) + i for i in range(3)],
                'ragged': [np.arange(2. + i) for i in range(3)]}[kind][:n]
        vs = [vs[i] for i in perm]
        vals = [vals[i] for i in perm]
        o = ModelOutput(vs, vals)
        ch.op()
        for i, v in enumerate(vs):
            ch.close(o[i], vals[i], 'item', 'by position')
            ch.close(getattr(o, v.name), vals[i], 'attr', 'by attribute')
            ch.close(o._asdict()[v], vals[i], 'dict', 'by key')
        ch.equal(len(o), n, 'len', 'length')
        ch.raises(AttributeError, lambda: o.nothing, 'unknown attribute', 'unknown attribute')
        d = o._asdict()
        d.clear()
        ch.equal(len(o._asdict()), n, 'copy', '_asdict gives a new dict')
        for v, ref in zip(tuple(o), vals):
            ch.close(v, ref, 'tuple', 'as tuple')
        ch.obs(perm, kind)

    return values, functions, unnamed, output


def spec(tier):
    values, functions, unnamed, output = make(tier == 'thorough')
    return {
        'bodies': {
            'values': {'body': values, 'bound': 3 if tier == 'quick' else 4},
            'functions': {'body': functions, 'bound': 3 if tier == 'quick' else 4},
            'unnamed': {'body': unnamed},
            'output': {'body': output},
        },
        'budget_s': 100 if tier == 'quick' else 780,
        'rule': 'all models of at most four components from the grammar of '
                'formulas, times renamings, definition orders, argument shapes, '
                'parameter points, model classes and calling styles; one outcome '
                'is the tuple of component names and reference values',
        'assumptions': ['reference values are computed by numpy from the same '
                        'formula written without sympy'],
    }
