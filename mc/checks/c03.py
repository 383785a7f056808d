"""C03: every symbol of a model gets its documented role and order."""
import sympy

from ..env import symfit
from .. import gen
from symfit import Model, CallableModel, Parameter, Variable
from symfit.core.models import ModelError, CallableNumericalModel, GradientModel


def check_roles(ch, model, am, syms):
    names = lambda l: [s.name for s in l]
    ch.equal(names(model.params), am.params, 'params', 'parameters')
    ch.equal(names(model.independent_vars), am.indep, 'independent', 'independent variables')
    got = (names(model.dependent_vars), names(model.interdependent_vars))
    if am.odd and got == ([c for c in am.dep if c not in am.odd],
                          sorted(am.inter + am.odd)):
        # listed: components which are used by no other one, but which
        # are not at the highest level, are reported as interdependent
        ch.evaluations += 1
        ch.fail('low component', 'a component that no other one uses is '
                'interdependent because it is below the top level',
                dependent=got[0], expected=am.dep)
        dep = got[0]
    else:
        dep = am.dep
        ch.equal(got[0], am.dep, 'dependent', 'dependent variables')
        ch.equal(got[1], am.inter, 'interdependent', 'interdependent variables')
    ch.equal(names(model.vars), am.indep + dep + ['sigma_' + d for d in dep],
             'vars', 'all variables')
    ch.equal([(k.name, v.name) for k, v in
              sorted(model.sigmas.items(), key=lambda t: t[0].name)],
             [(d, 'sigma_' + d) for d in dep], 'sigmas', 'sigma variables')
    for s in model.params:
        ch.expect(isinstance(s, Parameter) and s is not None and s == syms[s.name],
                  'parameter object', 'params are the parameters of the user')
    for s in model.independent_vars + model.dependent_vars + model.interdependent_vars:
        ch.expect(s == syms[s.name] and not isinstance(s, Parameter),
                  'variable object', 'variables are those of the user')
    ch.equal(names(model.free_params), [p for p in am.params if not syms[p].fixed],
             'free', 'free parameters')
    order = names(model.ordered_symbols)
    pos = {n: i for i, n in enumerate(order)}
    for c in am.components:
        for d in am.deps[c]:
            ch.expect(d in pos and c in pos and pos[d] < pos[c], 'toposort',
                      'dependencies come first', component=c, dependency=d, order=order)
    ch.equal({k.name: {s.name for s in v} for k, v in model.connectivity_mapping.items()},
             am.deps, 'connectivity', 'dependencies of every component')


def symbolic(ch):
    full = False
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS, v=gen.V_FORMS, dev=full)
    order = ch.pick('definition order', gen.orders(am), dev=True)
    cls = ch.pick('class', [Model, CallableModel, GradientModel], dev=True)
    fixed = ch.pick('fixed', [()] + [(p,) for p in am.params] + [tuple(am.params)])
    syms = am.symbols(**{p: dict(fixed=True) for p in fixed})
    model = cls(am.model_dict(syms, order))
    ch.op()
    check_roles(ch, model, am, syms)
    ch.obs(am.components, am.dep, am.inter, am.indep, am.params)


def numerical(ch):
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS)
    order = ch.pick('definition order', gen.orders(am))
    numeric = ch.pick('numeric', [list(am.comps)] + [
        [c for c in am.comps if c != d] for d in am.comps if len(am.comps) > 1])
    syms = am.symbols()
    d, con = am.callables(syms, numeric, order)
    model = CallableNumericalModel(d, connectivity_mapping=con)
    ch.op()
    check_roles(ch, model, am, syms)
    ch.obs(am.components, am.dep, am.inter, am.indep, am.params, len(numeric))


def refused(ch):
    """A parameter in the place of a component."""
    f = ch.pick('form', gen.Y_FORMS, dev=False)
    used = ch.pick('used by another component', [False, True], dev=False)
    const = ch.flag('constant component', dev=False)
    name = ch.pick('name', ['A', 'b1', 'zz'], dev=False)
    first = ch.flag('first', dev=False)
    am = gen.AM([f])
    syms = am.symbols()
    y = gen.param(name)
    expr = sympy.Integer(2) if const else list(am.model_dict(syms).values())[0]
    other = Variable('other')
    items = [(y, expr), (other, (y if used else syms['x'] if 'x' in syms else
                                 syms[am.params[0]]) * 2)]
    if const and not used:
        items = [(y, expr + syms[am.params[0]] if am.params else expr)] + items[1:]
        if not am.params:
            ch.pick('outside', [])
    if not first:
        items = items[::-1]
    ch.op()
    ch.raises(ModelError, lambda: Model(dict(items)), 'parameter as component',
              'a parameter used as a component')
    ch.obs(f.name, used, const)


def constant(ch):
    """Components which are plain numbers."""
    where = ch.pick('model', ['only', 'with other', 'used'], dev=False)
    val = ch.pick('value', [3, 0, sympy.Rational(1, 2), sympy.pi], dev=False)
    x, y, z = gen.Variable('x'), gen.Variable('y'), gen.Variable('z')
    a = gen.param('a')
    d = {y: sympy.sympify(val)}
    if where == 'with other':
        d[z] = a*x
    elif where == 'used':
        d[z] = a*x + y
    ch.op()
    try:
        model = Model(d)
    except IndexError:
        ch.fail('constant model', 'a model of constants only is not accepted')
        return
    dep = {'only': ['y'], 'with other': ['y', 'z'], 'used': ['z']}[where]
    inter = ['y'] if where == 'used' else []
    got = ([v.name for v in model.dependent_vars], [v.name for v in model.interdependent_vars])
    if got == ([n for n in dep if n != 'y'], []):
        ch.evaluations += 1
        ch.fail('constant component', 'a constant component has no role')
    else:
        ch.equal(got, (dep, inter), 'constant roles', 'roles with a constant component')
    ch.equal([v.name for v in model.independent_vars], [] if where == 'only' else ['x'],
             'constant independent', 'independent variables')
    ch.equal([v.name for v in model.params], [] if where == 'only' else ['a'],
             'constant params', 'parameters')
    ch.obs(where)


def spec(tier):
    t = tier == 'thorough'
    return {
        'bodies': {
            'symbolic': {'body': symbolic, 'bound': 3 if t else 1},
            'numerical': {'body': numerical, 'bound': 5 if t else 3},
            'refused': {'body': refused},
            'constant': {'body': constant},
        },
        'budget_s': 120 if not t else 780,
        'rule': 'all models of at most four components from the grammar of '
                'formulas under all renamings; definition orders, classes and '
                'fixed subsets within the deviation bound; an outcome is the '
                'assignment of roles',
        'assumptions': [],
    }
