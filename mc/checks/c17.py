"""C17: pickling preserves behaviour at any point of an object's life."""
import pickle
import re
import copy as copying

import numpy as np
from sympy.core.cache import clear_cache

from ..core import Skip
from .. import worlds as W
from ..unpickle import Fresh
from ..worlds import *  # noqa

THOROUGH = False
TWINS = {}


def normal(o):
    """Without the numbers of generated names."""
    if isinstance(o, str):
        return re.sub(r'(var|par)_\d+|_\d{6,}', 'generated', re.sub(r' at 0x[0-9a-f]+', '', o))
    if isinstance(o, list):
        return [normal(v) for v in o]
    return o


WAYS = ['fresh interpreter', 'same process', 'same process, objects forgotten',
        'fresh interpreter, twice']


def check(ch, kind, make, history, protocols=(4, 2, 5)):
    """Pickle after ``history``; the copy and the original behave as a twin."""
    way = ch.pick('where', WAYS)
    protocol = ch.pick('protocol', list(protocols) if kind in ('argument', 'arguments') or THOROUGH else [4, 2])
    obs = W.OBSERVERS[kind]
    # what a twin does which is never pickled
    key = (kind,) + tuple(t for t in ch.trace if t[0] not in ('where', 'protocol'))
    expected = TWINS.get(key)
    if expected is None:
        twin = make()
        history(twin)
        expected = TWINS[key] = normal(obs(twin))
    original = make()
    history(original)
    ch.op()
    blob = pickle.dumps(original, protocol)
    if way.startswith('fresh'):
        answer = Fresh.ask(kind, blob, protocol if 'twice' in way else 0)
        if not ch.expect(answer[0] == 'ok', 'copy raises', 'the copy in a fresh interpreter',
                         got=answer[1:]):
            return
        got = normal(answer[1])
        again = None
    else:
        if 'forgotten' in way:
            clear_cache()
        clone = pickle.loads(blob)
        again = pickle.loads(pickle.dumps(clone, protocol))
        ch.expect(type(clone) is type(original), 'type', 'type of the copy')
        got = normal(obs(clone))
    ch.expect(W.same(got, expected), 'copy', 'the copy behaves as the original',
              **W.first_difference(got, expected))
    if again is not None:
        got = normal(obs(again))
        ch.expect(W.same(got, expected), 'copy of copy', 'the copy of the copy behaves as the original',
                  **W.first_difference(got, expected))
    got = normal(obs(original))
    ch.expect(W.same(got, expected), 'original', 'the original is the same after pickling',
              **W.first_difference(got, expected))
    ch.obs(kind, expected)


def sequence(ch, ops, depth, dev=True):
    """A history: a sequence of operations, the empty one first."""
    out = []
    names = list(ops)
    for i in range(depth):
        op = ch.pick('op {}'.format(i + 1), [None] + names, dev=dev if i else False)
        if op is None:
            break
        out.append(op)
    return out


def models(ch):
    name = ch.pick('model', W.MODELS, dev=False)
    ops = {k: f for k, f in W.MODEL_OPS.items()}
    seq = sequence(ch, ops, 3 if THOROUGH else 1)
    attrs = ch.pick('attributes', list(W.ATTRS) if THOROUGH else ['mixed', 'free'])
    check(ch, 'model', lambda: W.build_model(name, attrs), lambda m: [ops[k](m) for k in seq])


def objectives(ch):
    objective = ch.pick('objective', list(W.OBJECTIVES), dev=False)
    model = ch.pick('model', W.OBJECTIVE_MODELS[objective], dev=False)
    seq = sequence(ch, W.OBJECTIVE_OPS, 3 if THOROUGH else 1)
    attrs = ch.pick('attributes', ['mixed', 'free', 'fixed', 'bounded'][:4 if THOROUGH else 2])
    check(ch, 'objective', lambda: W.build_objective(objective, model, attrs),
          lambda o: [W.OBJECTIVE_OPS[k](o) for k in seq])


def outputs(ch):
    model = ch.pick('model', W.MODELS, dev=False)
    what = ch.pick('output', ['call', 'jac', 'hess'], dev=False)
    m = W.build_model(model)
    f = {'call': '__call__', 'jac': 'eval_jacobian', 'hess': 'eval_hessian'}[what]
    if not hasattr(m, f):
        raise Skip()

    def make():
        return getattr(W.build_model(model), f)(**W.arguments(m))
    check(ch, 'output', make, lambda o: None)


NAMES = ['a', 'beta', 'S', 'x_1', 'lamda', 'E', 'par_3', 'a b']


def arguments_(ch):
    n = ch.pick('number', [1, 2, 3] if THOROUGH else [1, 2], dev=False)
    specs = []
    for i in range(n):
        t = ch.pick('type', ['Parameter', 'Variable'], dev=False)
        specs.append((t, ch.pick('name', NAMES if n == 1 else NAMES[:3], dev=False),
                      ch.pick('value', [1.0, 0.0, 3, -2.5]) if t == 'Parameter' else None,
                      ch.pick('bounds', [(None, None), (0.0, None), (None, 5), (-4, 8.5)])
                      if t == 'Parameter' else None,
                      ch.flag('fixed') if t == 'Parameter' else None))
    if len(set((s[0], s[1]) for s in specs)) < len(specs) and len(set(specs)) < n:
        pass
    for i, s in enumerate(specs):
        for o in specs[:i]:
            if s[:2] == o[:2] and s != o:
                raise Skip()  # two parameters of one name with different attributes
    as_list = n > 1

    def make():
        out = [W.param(s[1], s[2], s[3][0], s[3][1], s[4]) if s[0] == 'Parameter' else
               Variable(s[1]) for s in specs]
        return out if as_list else out[0]
    check(ch, 'arguments' if as_list else 'argument', make, lambda o: None)


MIN = [BFGS, SLSQP, TrustConstr, LBFGSB, NelderMead, Powell, COBYLA, DifferentialEvolution,
       BasinHopping, MINPACK, ChainedMinimizer]


def minimizers(ch):
    cls = ch.pick('minimizer', MIN, dev=False)
    problem = ch.pick('objective', [('minimize', 'scalar'), ('least squares', 'two'),
                                    ('least squares', 'callable'), ('vector', 'two')][
                                        3 if cls is MINPACK else 0:4 if cls is MINPACK else 3], dev=False)
    attrs = ch.pick('attributes', ['bounded', 'free', 'fixed', 'mixed'])
    extra = 'none'
    if cls in (SLSQP, TrustConstr, COBYLA):
        extra = ch.pick('constraints', ['none', 'one', 'two'])
    elif cls is BasinHopping:
        extra = ch.pick('local', ['none', 'NelderMead', 'SLSQP', 'SLSQP constrained', 'instance',
                                  'TrustConstr'])
    elif cls is ChainedMinimizer:
        extra = ch.pick('stages', ['NelderMead BFGS', 'BFGS', 'SLSQP constrained', 'BasinHopping COBYLA'])
    given = []
    if cls in (BFGS, LBFGSB, SLSQP, TrustConstr) and problem[1] != 'callable':
        given = ch.pick('derivatives', [['jacobian', 'hessian'], ['jacobian'], ['hessian'], []])
        if 'hessian' in given and cls is not TrustConstr:
            given = [g for g in given if g != 'hessian']
    seq = []
    for i in range(2):
        op = ch.pick('op {}'.format(i + 1), [None, 'execute', 'look', 'start', 'str', 'other'],
                     dev=False if i == 0 else True)
        if op is None:
            break
        seq.append(op)

    def make():
        o = W.build_objective(problem[0], problem[1], attrs)
        ps = o.model.params
        s = {p.name: p for p in ps}
        cons = {'one': [Ge(s['a'] + s['b'], -3)],
                'two': [Ge(s['a'] + s['b'], -3), Eq(s['a'] * s['b'], 1)],
                'constrained': [Ge(s['a'] * s['b'], -3)]}

        def derivs(o):
            return {g: getattr(o, 'eval_' + g) for g in given}

        def con(key, cls_):
            return {'constraints': [
                MinimizeModel(type(o.model).as_constraint(k, o.model), data=o.data)
                for k in cons[key]]} if cls_ is not None else {}
        if cls in (SLSQP, TrustConstr, COBYLA):
            return cls(o, ps, **dict(derivs(o), **(con(extra, cls) if extra != 'none' else {})))
        if cls is BasinHopping:
            if extra == 'none':
                return cls(o, ps)
            if extra == 'SLSQP constrained':
                return cls(o, ps, local_minimizer=SLSQP(o, ps, **con('constrained', SLSQP)))
            if extra == 'instance':
                return cls(o, ps, local_minimizer=LBFGSB(o, ps))
            return cls(o, ps, local_minimizer=getattr(W, extra))
        if cls is ChainedMinimizer:
            if extra == 'SLSQP constrained':
                stages = [NelderMead(o, ps), SLSQP(o, ps, **con('constrained', SLSQP))]
            else:
                stages = [getattr(W, k)(o, ps) for k in extra.split()]
            return cls(o, ps, minimizers=stages)
        return cls(o, ps, **derivs(o))

    def history(m):
        for op in seq:
            if op == 'execute':
                W.run(m, 1)
            elif op == 'look':
                W.observe_minimizer(m)
            elif op == 'start':
                m.initial_guesses = [0.125 * (i + 1) for i in range(len(m.params))]
            elif op == 'str':
                str(m)
            elif op == 'other':
                m.objective(m.initial_guesses)
    check(ch, 'minimizer', make, history)


FITS = ['default', 'bounds', 'SLSQP', 'constrained', 'TrustConstr', 'chain', 'BasinHopping',
        'BasinHopping SLSQP', 'vector', 'likelihood', 'minimize', 'numerical', 'ode', 'constrained basin',
        'sigma']


def build_fit(name, attrs):
    data = dict(x=XDATA['x'], y=np.array([0.3, 1.4, -0.2, 2.5]), z=np.array([1.3, 2.4, 0.8, 3.5]))
    s = W.symbols(attrs)
    m = W.build_model({'vector': 'one', 'likelihood': 'positive', 'minimize': 'scalar',
                       'constrained': 'scalar', 'constrained basin': 'scalar',
                       'numerical': 'numerical', 'ode': 'ode'}.get(name, 'two'), attrs)
    cons = [Ge(s['a'] + s['b'], -3), Eq(s['a'] * s['b'], 1)]
    if name in ('default', 'bounds', 'numerical'):
        return Fit(m, **data)
    if name == 'SLSQP':
        return Fit(m, minimizer=SLSQP, **data)
    if name == 'constrained':
        return Fit(m, objective=MinimizeModel, constraints=cons)
    if name == 'TrustConstr':
        return Fit(m, minimizer=TrustConstr, constraints=cons[:1], **data)
    if name == 'chain':
        return Fit(m, minimizer=[NelderMead, BFGS], **data)
    if name == 'BasinHopping':
        return Fit(m, minimizer=BasinHopping, **data)
    if name == 'BasinHopping SLSQP':
        return Fit(m, minimizer=[BasinHopping, SLSQP], constraints=cons[:1], **data)
    if name == 'constrained basin':
        return Fit(m, objective=MinimizeModel, minimizer=BasinHopping, constraints=cons[:1])
    if name == 'vector':
        return Fit(m, x=data['x'], y=data['y'], minimizer=MINPACK)
    if name == 'likelihood':
        return Fit(m, x=data['x'], objective=LogLikelihood)
    if name == 'minimize':
        return Fit(m, objective=MinimizeModel)
    if name == 'ode':
        return Fit(m, t=XDATA['t'], y=data['y'], z=data['z'])
    if name == 'sigma':
        return Fit(m, sigma_y=0.5, sigma_z=np.array([1., 2., 1., 2.]), absolute_sigma=False, **data)
    raise KeyError(name)


def fits(ch):
    name = ch.pick('fit', FITS, dev=False)
    attrs = ch.pick('attributes', ['mixed', 'free', 'fixed', 'bounded'])
    seq = []
    for i in range(2):
        op = ch.pick('op {}'.format(i + 1), [None, 'execute', 'model', 'objective', 'covariance'],
                     dev=False if i == 0 else True)
        if op is None:
            break
        seq.append(op)

    def history(f):
        for op in seq:
            if op == 'execute':
                W.run(f, 1)
            elif op == 'model':
                W.observe_model(f.model)
            elif op == 'objective':
                W.observe_objective(f.objective)
            elif op == 'covariance':
                f.covariance_matrix({p.name: p.value for p in f.model.params})
    check(ch, 'fit', lambda: build_fit(name, attrs), history)


def results(ch):
    name = ch.pick('fit', FITS, dev=False)
    attrs = ch.pick('attributes', ['mixed', 'free', 'fixed', 'bounded'])
    which = ch.pick('result', ['first', 'second'], dev=True)
    op = ch.pick('op', [None, 'str', 'observe', 'run again'], dev=False)
    inner = ch.flag('of the minimizer')

    def make():
        f = build_fit(name, attrs)
        thing = f.minimizer if inner else f
        result, _ = W.run(thing, 0)
        if which == 'second':
            result, _ = W.run(thing, 1)
        return result

    def history(r):
        if op == 'str':
            str(r)
        elif op == 'observe':
            W.observe_result(r)
        elif op == 'run again':
            W.run(r.minimizer, 1)
    check(ch, 'result+minimizer', make, history)


def real(ch):
    """After executions by the real back ends."""
    cls = ch.pick('minimizer', [BFGS, SLSQP, TrustConstr, LBFGSB, NelderMead, Powell, COBYLA,
                                DifferentialEvolution, BasinHopping, MINPACK, 'chain'], dev=False)
    again = ch.pick('before', ['executed', 'executed twice'])
    inner = ch.flag('of the minimizer')

    def make():
        m = W.build_model('one' if cls is MINPACK else 'scalar', 'free')
        for p in m.params:
            p.min, p.max = -5.0, 5.0
        if cls is MINPACK:
            f = Fit(m, x=XDATA['x'], y=np.array([0.3, 1.4, -0.2, 2.5]), minimizer=cls)
        else:
            f = Fit(m, objective=MinimizeModel,
                    minimizer=[NelderMead, BFGS] if cls == 'chain' else cls)
        thing = f.minimizer if inner else f
        kw = W.REAL.get(getattr(cls, '__name__', None), {})
        r = thing.execute(**kw)
        if again == 'executed twice':
            r = thing.execute(**kw)
        return r
    check(ch, 'real', make, lambda r: None, protocols=(4, 2))


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'arguments': {'body': arguments_, 'bound': 2 if t else 1},
            'models': {'body': models, 'bound': 2 if t else 1},
            'objectives': {'body': objectives, 'bound': 2 if t else 1},
            'outputs': {'body': outputs, 'bound': 2},
            'minimizers': {'body': minimizers, 'bound': 2 if t else 1},
            'fits': {'body': fits, 'bound': 2 if t else 1},
            'real': {'body': real, 'bound': 2 if t else 1},
            'results': {'body': results, 'bound': 2 if t else 1},
        },
        'budget_s': 240 if not t else 780,
        'rule': 'every kind of object x every history of operations within the bound x where it is '
                'unpickled (fresh interpreter with another hash seed, same process, same process with '
                'all cached objects forgotten, twice) x pickle protocol; the copy, the copy of the copy '
                'and the original are compared with a twin which was never pickled',
        'assumptions': ['functions are picklable by name, as the pickle module demands',
                        'the number in a generated name is not part of the behaviour'],
    }
