"""C09: data end up with the variable they belong to, or are refused."""
import numpy as np
import sympy

from ..env import symfit
from .. import gen
from ..core import Skip
from ..fitgen import LogLikelihood, MinimizeModel, LeastSquares, L_FORMS
from symfit import Fit, Model, CallableModel, Variable, Eq, Ge
from symfit.core.fit import TakesData, HasCovarianceMatrix

N = 3
BASE = np.array([1.5, -0.25, 2.0])


def arr(k, kind):
    """Distinct recognisable data for the k-th variable."""
    a = BASE + k
    if kind == 'list':
        return a.tolist(), a
    if kind == 'tuple':
        return tuple(a.tolist()), a
    if kind == 'ints':
        b = np.arange(1, N + 1) * (k + 1)
        return b.tolist(), b
    if kind == 'intarray':
        b = np.arange(1, N + 1) * (k + 1)
        return b, b
    if kind == 'matrix':
        b = (a[:, None] + np.arange(2))
        return b, b
    if kind == 'nested':
        b = (a[:, None] + np.arange(2))
        return b.tolist(), b
    if kind == 'none':
        return None, None
    return a, a


X_KINDS = ['array', 'list', 'tuple', 'ints', 'intarray', 'matrix', 'nested', 'scalar']
Y_KINDS = ['array', 'list', 'tuple', 'ints', 'intarray', 'matrix', 'nested', 'none']
S_KINDS = ['omitted', 'array', 'None', 'scalar', 'int', 'list', 'zerodim', 'tuple', 'intarray']


def sigma(k, kind, shape):
    a = 0.5 + k + np.arange(int(np.prod(shape))).reshape(shape) / 4
    if kind in ('omitted', 'None'):
        return None, np.ones(shape)
    if kind == 'scalar':
        return 0.75 + k, np.full(shape, 0.75 + k)
    if kind == 'int':
        return 2 + k, np.full(shape, 2 + k)
    if kind == 'zerodim':
        return np.array(0.75 + k), np.full(shape, 0.75 + k)
    if kind == 'list':
        return a.tolist(), a
    if kind == 'tuple':
        return tuple(a.tolist()), a
    if kind == 'intarray':
        a = np.arange(1, 1 + int(np.prod(shape))).reshape(shape) + k
        return a, a
    return a, a


def accepted(ch):
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS[:5], allow_odd=False)
    cls = ch.pick('class', [Fit, TakesData, HasCovarianceMatrix])
    given, expect = {}, {}
    k = 0
    for n in am.indep:
        kind = ch.pick('x', X_KINDS)
        if kind == 'scalar':
            given[n], expect[n] = 1.25 + k, 1.25 + k
        else:
            given[n], expect[n] = arr(k, kind)
        k += 1
    for n in am.dep:
        kind = ch.pick('y', Y_KINDS if len(am.dep) > 1 else Y_KINDS[:-1])
        given[n], expect[n] = arr(k, kind)
        k += 1
    if all(given[n] is None for n in am.dep):
        raise Skip()
    s_names = ['sigma_' + n for n in am.dep]
    omitted = []
    for n, s in zip(am.dep, s_names):
        if given[n] is None:
            kind = ch.pick('sigma', ['omitted', 'None'])
            given[s], expect[s] = None, None
        else:
            kind = ch.pick('sigma', S_KINDS)
            given[s], expect[s] = sigma(k, kind, np.shape(given[n]))
        if kind == 'omitted':
            omitted.append(s)
        k += 1
    any_sigma = any(given[s] is not None for s in s_names)
    absolute = ch.pick('absolute_sigma', [None, True, False])
    names = am.indep + am.dep + s_names
    split = ch.pick('positional arguments', [0, len(names)] + list(range(1, len(names))))
    # positions can only be left out at the end
    pos = names[:split]
    while pos and pos[-1] in omitted:
        pos.pop()
    kwargs = {n: given[n] for n in names if n not in pos and n not in omitted}
    if ch.flag('keywords reversed'):
        kwargs = dict(list(kwargs.items())[::-1])
    if absolute is not None:
        kwargs['absolute_sigma'] = absolute
    asdict = ch.pick('model given as', ['Model', 'dict'])
    syms = am.symbols()
    model = am.model_dict(syms)
    if asdict == 'Model':
        model = Model(model)
    copies = {n: np.array(v, copy=True) if isinstance(v, np.ndarray) else
              (list(v) if isinstance(v, list) else v) for n, v in given.items()}
    ch.op()
    fit = cls(model, *[given[n] for n in pos], **kwargs)
    for n in names:
        var = Variable(n)
        ch.expect(var in fit.data, 'missing', 'every variable has an entry in fit.data', variable=n)
        val = fit.data[var]
        exp = expect[n]
        if exp is None:
            ch.expect(val is None, 'none', 'absent data stay absent', variable=n, got=repr(val))
            continue
        ch.close(val, exp, 'data', 'data of a variable', rtol=0, atol=1e-12, variable=n)
        if not np.isscalar(exp):
            ch.expect(isinstance(val, np.ndarray), 'array', 'data are arrays', variable=n)
    groups = [('independent_data', am.indep), ('dependent_data', am.dep), ('sigma_data', s_names)]
    for attr, ns in groups:
        ch.equal([v.name for v in getattr(fit, attr)], ns, attr, 'order of ' + attr)
        for v, val in getattr(fit, attr).items():
            if expect[v.name] is not None:
                ch.close(val, expect[v.name], attr, attr, rtol=0, atol=1e-12)
    ch.equal(bool(fit.absolute_sigma), any_sigma if absolute is None else absolute,
             'absolute_sigma', 'absolute_sigma')
    for n, v in given.items():
        same = (np.array_equal(v, copies[n]) if isinstance(v, np.ndarray) else v == copies[n])
        ch.expect(bool(np.all(same)), 'input changed', 'data of the user', variable=n)
    if cls is Fit:
        for n, val in fit.objective.dependent_data.items():
            if expect[n.name] is not None:
                ch.close(val, expect[n.name], 'objective data', 'data in the objective')
        for n, val in fit.objective.sigma_data.items():
            if expect[n.name] is not None:
                ch.close(val, expect[n.name], 'objective sigma', 'sigma in the objective')
    ch.obs(names, split, any_sigma, absolute, expect)


def refused(ch):
    am = gen.pick_model(ch, z=gen.Z_FORMS, u=gen.U_FORMS[:3], allow_odd=False, dev=False,
                        names=gen.NAMES[:3])
    names = am.indep + am.dep
    s_names = ['sigma_' + n for n in am.dep]
    how = ch.pick('how', ['missing name', 'missing position', 'surplus', 'unknown', 'double',
                          'interdependent', 'parameter', 'sigma of x'], dev=False)
    which = ch.pick('which', list(range(len(names))), dev=False)
    syms = am.symbols()
    model = Model(am.model_dict(syms))
    data = {n: BASE + i for i, n in enumerate(names + s_names)}
    pos = [data[n] for n in names + s_names]
    victim = names[which]
    if len(model) == 1 and not am.indep and how in ('missing name', 'missing position'):
        raise Skip()      # a model to be minimised needs no data
    ch.op()
    if how == 'missing name':
        f = lambda: Fit(model, **{n: data[n] for n in names if n != victim})
    elif how == 'missing position':
        f = lambda: Fit(model, *pos[:which])
    elif how == 'surplus':
        f = lambda: Fit(model, *(pos + [BASE] * (which + 1)))
    elif how == 'unknown':
        f = lambda: Fit(model, **dict({n: data[n] for n in names}, **{'q_' + victim: BASE}))
    elif how == 'double':
        f = lambda: Fit(model, *[data[n] for n in names], **{victim: BASE})
    elif how == 'interdependent':
        if which >= len(am.inter):
            raise Skip()
        f = lambda: Fit(model, **dict({n: data[n] for n in names}, **{am.inter[which]: BASE}))
    elif how == 'parameter':
        if which >= len(am.params):
            raise Skip()
        f = lambda: Fit(model, **dict({n: data[n] for n in names}, **{am.params[which]: BASE}))
    else:
        if which >= len(am.indep):
            raise Skip()
        f = lambda: Fit(model, **dict({n: data[n] for n in names},
                                      **{'sigma_' + am.indep[which]: BASE}))
    ch.raises(TypeError, f, how, 'data of a fit: ' + how)
    ch.obs(how, which, names)


def likelihood(ch):
    """Objectives which need no dependent data refuse them."""
    form = ch.pick('form', L_FORMS, dev=False)
    second = ch.pick('second', [None, gen.F('z=exp(c*x)', 'c x', lambda m, c, x: m.exp(c*x))], dev=False)
    nm = ch.pick('names', gen.NAMES[:3], dev=False)
    objective = ch.pick('objective', [LogLikelihood, MinimizeModel, 'instance'], dev=False)
    how = ch.pick('how', ['fine', 'dependent', 'sigma', 'position', 'missing x', 'dependent and sigma'], dev=False)
    am = gen.AM([form] + ([second] if second else []), nm[1])
    if objective is MinimizeModel and second:
        raise Skip()
    syms = am.symbols()
    model = Model(am.model_dict(syms))
    data = {n: BASE + 3 + i for i, n in enumerate(am.indep)}
    if objective == 'instance':
        full = {syms[n]: v for n, v in data.items()}
        for n in am.dep:
            full[syms[n]] = None
            full[model.sigmas[syms[n]]] = None
        objective = LogLikelihood(model, full)
    ch.op()
    extra = {}
    if how == 'dependent':
        extra = {am.dep[-1]: BASE}
    elif how == 'sigma':
        extra = {'sigma_' + am.dep[-1]: BASE}
    elif how == 'dependent and sigma':
        extra = {am.dep[0]: BASE, 'sigma_' + am.dep[0]: BASE}
    elif how == 'missing x':
        if not am.indep:
            raise Skip()
        data.pop(am.indep[0])
    if how == 'fine':
        fit = Fit(model, objective=objective, **data)
        for n, v in data.items():
            ch.close(fit.data[Variable(n)], v, 'data', 'data of a likelihood fit')
        for n in am.dep:
            ch.expect(fit.data[Variable(n)] is None, 'dependent', 'no dependent data')
    elif how == 'position':
        ch.raises(TypeError, lambda: Fit(model, *([data[n] for n in am.indep] + [BASE]),
                                         objective=objective), how, 'likelihood fit: ' + how)
    else:
        ch.raises(TypeError, lambda: Fit(model, objective=objective, **dict(data, **extra)),
                  how, 'likelihood fit: ' + how)
    ch.obs(form.name, how, str(objective)[:20])


def constraint_data(ch):
    """Variables which only occur in constraints take data as well."""
    form = ch.pick('form', gen.Y_FORMS[:4], dev=False)
    nm = ch.pick('names', gen.NAMES[:4], dev=False)
    n_con = ch.pick('constraints', [1, 2], dev=False)
    kind = ch.pick('data', ['array', 'list', 'scalar'], dev=False)
    how = ch.pick('how', ['named', 'missing'], dev=False)
    sig = ch.pick('sigma', ['omitted', 'scalar'], dev=False)
    am = gen.AM([form], nm[1])
    syms = am.symbols()
    y = syms[am.dep[0]]
    p = syms[am.params[0]]
    q, r = Variable('Aq'), Variable('zr')
    val = {'array': (BASE, BASE), 'list': (BASE.tolist(), BASE), 'scalar': (2.5, 2.5)}[kind]
    cons = [Ge(p * q, 1), Eq(p, r)][:n_con]
    data = {n: BASE + i for i, n in enumerate(am.indep + am.dep)}
    data['Aq'] = val[0]
    if n_con == 2:
        data['zr'] = 4.0
    expect = dict(data, Aq=val[1])
    if sig == 'scalar':
        data['sigma_' + am.dep[0]] = 2.0
    ch.op()
    if how == 'missing':
        bad = dict(data)
        bad.pop('Aq')
        ch.raises(TypeError, lambda: Fit(am.model_dict(syms), constraints=cons, **bad), how,
                  'missing data of a constraint')
        return
    fit = Fit(am.model_dict(syms), constraints=cons, **data)
    for n, v in expect.items():
        ch.close(fit.data[Variable(n)], v, 'data', 'data with constraints', variable=n)
    ch.equal(bool(fit.absolute_sigma), sig == 'scalar', 'absolute_sigma', 'absolute_sigma')
    s = fit.sigma_data
    ch.close(list(s.values())[0], np.full(N, 2.0 if sig == 'scalar' else 1.0), 'sigma', 'sigma')
    ch.obs(form.name, nm[0], n_con, kind, sig)


def spec(tier):
    t = tier == 'thorough'
    return {
        'bodies': {
            'accepted': {'body': accepted, 'bound': 4 if t else 3},
            'refused': {'body': refused},
            'likelihood': {'body': likelihood},
            'constraint data': {'body': constraint_data},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'models of up to three components times kind of data per variable, kind of '
                'sigma per component, every split into positional and named arguments, '
                'absolute_sigma, and every kind of wrong data; an outcome is the binding',
        'assumptions': [],
    }
