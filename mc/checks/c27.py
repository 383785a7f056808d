"""C27: the printed form of a model says what it computes."""
import re

import numpy as np
import sympy
from symfit import (Model, CallableModel, CallableNumericalModel, ODEModel, D, Eq, Ge, Le,
                    Variable, Parameter)
from symfit.core.models import GradientModel

from .. import gen
from ..core import Skip
from ..fitgen import NumericalGradientModel

THOROUGH = False
LINE = re.compile(r'^(\w+)\((.*?); (.*?)\) = (.*)$')
ODE_LINE = re.compile(r'^Derivative\((\w+), (\w+); (.*?)\) = (.*)$')
CLASSES = [Model, CallableModel, GradientModel]
for _c in CLASSES + [CallableNumericalModel, NumericalGradientModel, ODEModel]:
    _c.mc_name = _c.__name__


def split(text):
    return [n.strip() for n in text.split(',')] if text.strip() else []


def value(text, syms, at):
    """Evaluate a printed expression with values by name."""
    local = {n: sympy.Symbol('v_' + n) for n in syms}
    expr = sympy.sympify(text, locals=dict(local))
    free = sorted(expr.free_symbols, key=str)
    names = [s.name[2:] for s in free]
    return sorted(names), float(expr.subs({local[n]: sympy.Float(at[n], 30) for n in names}))


def lines(ch, model, n):
    """The printed lines, one per component."""
    text = str(model)
    ch.expect(text.startswith('[') and text.endswith(']'), 'brackets', 'components are in brackets',
              got=text, abort=True)
    out = text[1:-1].split(',\n ')
    ch.expect(len(out) == n, 'lines', 'one line per component', got=out, abort=True)
    return out


def point(am, k):
    """Values of everything, by name, where the components have their own values."""
    rng = [0.37, 1.21, -0.58, 2.13, 0.91, -1.37, 1.73, 0.66]
    names = am.indep + am.params
    at = {n: rng[(i + 3 * k) % len(rng)] for i, n in enumerate(names)}
    ref = am.ref({n: at[n] for n in am.indep}, {n: at[n] for n in am.params}, [])
    # printed expressions have other components as variables
    at.update((c, 0.25 + 0.5 * i - k) for i, c in enumerate(am.components))
    return at, ref


def own_value(am, c, at):
    """The component ``c`` at values of all its dependencies."""
    f = am.forms[c]
    return float(f.f(np, *[np.float64(at[am.nm(s)]) for s in f.syms]))


def compare(ch, am, text, syms, numeric=(), sign=None, top=True):
    seen = []
    for line in text:
        m = LINE.match(line)
        if not ch.expect(m is not None, 'form', 'a line reads y(x; a) = expression', got=line):
            return
        name, vs, ps, expr = m.groups()
        seen.append(name)
        abstract = [c for c in am.comps if am.nm(c) == name]
        if not ch.expect(len(abstract) == 1, 'component', 'a line is about a component', got=line):
            return
        deps = am.deps[name]
        ch.equal(split(vs), sorted(d for d in deps if d not in am.params), 'variables',
                 'variables of a component')
        ch.equal(split(ps), sorted(d for d in deps if d in am.params), 'parameters',
                 'parameters of a component')
        if abstract[0] in numeric:
            continue
        for k in (0, 1):
            at, _ = point(am, k)
            names, got = value(expr, list(at), at)
            s = -1 if sign == -1 and name in am.dep else 1
            ch.expect(set(names) <= deps, 'symbols', 'symbols of the expression', got=names)
            ch.close(got, s * own_value(am, abstract[0], at), 'expression', 'value of the printed '
                     'expression', rtol=1e-9, atol=1e-10, line=line)
    ch.equal(seen, am.components, 'order', 'components in alphabetical order')
    ch.obs(text)


def typeset(ch, am, model, syms, sign):
    """The same in LaTeX, where sympy typesets the formulas."""
    text = model._repr_latex_()
    begin, end = r'\begin{align}', r'\end{align}'
    if not ch.expect(text.startswith(begin) and text.endswith(end), 'latex environment',
                     'environment', got=text):
        return
    parts = text[len(begin):-len(end)].split(r'\\')
    formulas = {v.name: e for v, e in am.model_dict(syms).items()}
    tex = sympy.latex
    exp = []
    for n in am.components:
        args = ['; '.join(', '.join(tex(syms[d]) for d in sorted(am.deps[n]) if (d in am.params) == p)
                          for p in (False, True))][0]
        formula = formulas[n] if sign == 1 or n not in am.dep else -formulas[n]
        exp.append('{}({}) & = {}'.format(tex(syms[n]), args, tex(formula)))
    ch.equal(parts, exp, 'latex', 'typeset components')


def symbolic(ch):
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS, v=gen.V_FORMS)
    order = ch.pick('definition order', gen.orders(am))
    cls = ch.pick('class', CLASSES)
    before = ch.pick('before', ['nothing', 'evaluated', 'negated', 'printed'])
    what = ch.pick('printed', ['model', 'negated', 'composed'])
    if am.odd and what == 'negated':
        raise Skip()     # whether those are dependent is not the question here
    syms = am.symbols()
    model = cls(am.model_dict(syms, order))
    at, _ = point(am, 0)
    vals = {n: at[n] for n in am.indep + am.params}
    if before == 'evaluated':
        model(**vals)
        if hasattr(model, 'eval_jacobian') and am.params:
            model.eval_jacobian(**vals)
    elif before == 'negated':
        -model
    elif before == 'printed':
        str(model)
    ch.op()
    if what == 'negated':
        model = -model
    elif what == 'composed':
        # one component which depends on all the components of the model
        new = Variable('aa_new')
        top = Model.with_dependencies({new: sum(syms[c] * (i + 2) for i, c in enumerate(am.components))},
                                      dependency_model=model)
        text = lines(ch, top, len(am.components) + 1)
        first = ([t for t in text if t.startswith('aa_new(')] or text)[0]
        m = LINE.match(first)
        if ch.expect(m is not None and m.group(1) == 'aa_new', 'composed', 'line of the new component',
                     got=first):
            ch.equal(split(m.group(2)), am.components, 'composed variables', 'variables')
            ch.equal(split(m.group(3)), [], 'composed parameters', 'parameters')
            names, got = value(m.group(4), list(at), at)
            ch.close(got, sum(at[c] * (i + 2) for i, c in enumerate(am.components)),
                     'composed expression', 'value of the printed expression')
        compare(ch, am, [t for t in text if t != first], syms)
        return
    compare(ch, am, lines(ch, model, len(am.components)), syms, sign=-1 if what == 'negated' else None)
    typeset(ch, am, model, syms, -1 if what == 'negated' else 1)


def numerical(ch):
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS)
    cls = ch.pick('class', [CallableNumericalModel, NumericalGradientModel], dev=False)
    numeric = ch.pick('callables', [am.comps, am.comps[:1], am.comps[-1:]])
    order = ch.pick('definition order', gen.orders(am))
    if not any(am.forms[c].syms for c in numeric):
        raise Skip()
    syms = am.symbols()
    d, con = am.callables(syms, numeric, order)
    ch.op()
    compare(ch, am, lines(ch, cls(d, connectivity_mapping=con), len(am.components)), syms, numeric)


ODES = [
    ("y'=-a*y", 'y', 'a', lambda m, s: {'y': -s['a']*s['y']}),
    ("y'=a*t+b", 'y', 'a b', lambda m, s: {'y': s['a']*s['t'] + s['b']}),
    ("y'=-a*y, z'=a*y-b*z", 'y z', 'a b', lambda m, s: {'y': -s['a']*s['y'],
                                                       'z': s['a']*s['y'] - s['b']*s['z']}),
    ("y'=z, z'=-a**2*y", 'y z', 'a', lambda m, s: {'y': s['z'], 'z': -s['a']**2*s['y']}),
    ("y'=sin(t)*a, z'=y*z, u'=exp(-b*t)*u", 'y z u', 'a b',
     lambda m, s: {'y': m.sin(s['t'])*s['a'], 'z': s['y']*s['z'], 'u': m.exp(-s['b']*s['t'])*s['u']}),
]
ODE_NAMES = [{}, dict(y='z', z='y', u='a_u'), dict(t='a_t', y='t', z='S', u='E'),
             dict(a='z1', b='b', y='y1', z='y0')]


def ode(ch):
    label, comps, params, f = ch.pick('system', ODES, dev=False)
    names = ch.pick('names', ODE_NAMES, dev=False)
    initial = ch.pick('initial', ['number', 'parameter', 'parameter of the system'], dev=False)
    order = ch.pick('order', ['given', 'reversed'], dev=False)
    what = ch.pick('printed', ['model', 'negated'], dev=False)
    nm = lambda n: names.get(n, n)
    comps, params = comps.split(), params.split()
    s = {c: Variable(nm(c)) for c in comps + ['t']}
    s.update((p, gen.param(nm(p))) for p in params)
    rhs = f(sympy, s)
    init = {s['t']: 0.5}
    expected = [nm(p) for p in params]
    for i, c in enumerate(comps):
        if initial == 'parameter' and i == 0:
            init[s[c]] = gen.param('q0')
            expected.append('q0')
        elif initial == 'parameter of the system':
            init[s[c]] = s['a']
        else:
            init[s[c]] = 1.0 + i
    keys = comps if order == 'given' else comps[::-1]
    model = ODEModel({D(s[c], s['t']): rhs[c] for c in keys}, init)
    if what == 'negated':
        model = -model
    ch.op()
    text = str(model).split('\n')
    ch.expect(len(text) == len(comps), 'lines', 'one line per component', got=text, abort=True)
    seen = []
    for line in text:
        m = ODE_LINE.match(line)
        if not ch.expect(m is not None, 'ode form', 'form of a line', got=line):
            return
        c, t, ps, expr = m.groups()
        seen.append(c)
        ch.equal(t, nm('t'), 'ode variable', 'independent variable')
        ch.equal(split(ps), sorted(expected), 'ode parameters', 'parameters of the system')
        own = [k for k in comps if nm(k) == c]
        if not ch.expect(len(own) == 1, 'ode component', 'a line is about a component', got=line):
            return
        at = {nm(k): v for k, v in zip(comps + ['t'] + params, (0.7, -1.2, 1.6, 0.4, -0.9, 1.3))} \
            if len(comps) == 3 else {nm(k): v for k, v in zip(comps + ['t'] + params, (0.7, -1.2, 0.4, -0.9, 1.3))}
        values = f(np, {k: np.float64(at[nm(k)]) for k in comps + ['t'] + params})
        _, got = value(expr, list(at), at)
        ch.close(got, (-1 if what == 'negated' else 1) * float(values[own[0]]), 'ode expression',
                 'value of the printed right hand side', line=line)
    ch.equal(sorted(seen), sorted(nm(c) for c in comps), 'ode components', 'components')
    ch.obs(text)


def constraint(ch):
    """The constraint model made from a relation."""
    f = ch.pick('model', [g for g in gen.Y_FORMS if set(g.syms) <= set('abcdx')], dev=False)
    names = ch.pick('names', gen.NAMES, dev=False)
    rel = ch.pick('relation', [Eq, Ge, Le], dev=False)
    left = ch.pick('left', ['a', 'a*b', 'a+2'], dev=False)
    right = ch.pick('right', [0, 1.5, 'b', 'b**2'], dev=False)
    am = gen.AM([f], names[1])
    syms = am.symbols()
    model = Model(am.model_dict(syms))
    a, b = gen.param(names[1].get('a', 'a')), gen.param(names[1].get('b', 'b'))
    if not set(n.name for n in (a, b)) <= set(am.params):
        raise Skip()
    table = {'a': (a, lambda A, B: A), 'a*b': (a*b, lambda A, B: A*B), 'a+2': (a + 2, lambda A, B: A + 2),
             'b': (b, lambda A, B: B), 'b**2': (b**2, lambda A, B: B**2)}
    lhs, fl = table[left]
    rhs, fr = table[right] if right in table else (sympy.sympify(right), lambda A, B: right)
    ch.op()
    relation = rel(lhs, rhs)
    con = Model.as_constraint(relation, model)
    m = LINE.match(lines(ch, con, 1)[0])
    if not ch.expect(m is not None, 'constraint form', 'form of the line', got=str(con)):
        return
    used = sorted(s.name for s in (lhs - rhs).free_symbols)
    ch.equal(split(m.group(2)), [], 'constraint variables', 'variables')
    ch.equal(split(m.group(3)), used, 'constraint parameters', 'parameters')
    sign = set()
    for A, B in ((0.7, -1.3), (2.5, 0.4)):
        _, got = value(m.group(4), [a.name, b.name], {a.name: A, b.name: B})
        exp = fl(A, B) - fr(A, B)
        sign.add(1 if abs(got - exp) < 1e-9 else -1 if abs(got + exp) < 1e-9 else 0)
    ch.expect(sign in ({1}, {-1}), 'constraint expression', 'printed expression of a constraint',
              got=str(con))
    # equal to what the model evaluates to
    at = {p.name: 0.1 for p in con.params}
    at.update({a.name: 0.7, b.name: -1.3})
    ch.close(np.squeeze(con(**at)[0]),
             value(m.group(4), list(at), at)[1], 'constraint value', 'value of the constraint')
    ch.obs(str(con))


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'symbolic': {'body': symbolic, 'bound': 4 if t else 2},
            'numerical': {'body': numerical, 'bound': 4 if t else 3},
            'ode': {'body': ode},
            'constraint': {'body': constraint},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'all models of at most four components of the grammar, names, orders of definition, '
                'classes and what happened before within the bound; every system of ODEs, every '
                'relation; the printed lines are parsed and evaluated, against numpy',
        'assumptions': ['printed expressions are read by sympy'],
    }
