"""C16: a chain of minimizers hands its result from stage to stage."""
import itertools

import numpy as np
from symfit.core.minimizers import ChainedMinimizer, BaseMinimizer

from ..env import scripted
from .. import gen, handed
from ..core import Skip
from ..backend import *  # noqa
from ..fitgen import subsets

THOROUGH = False
NFEV = 100     # COBYLA reports its evaluations as iterations


class Done(Exception):
    pass


def option_of(minimizer, i):
    """(options, reader of the value at the back end, value) for stage i."""
    if minimizer is BasinHopping:
        return {'niter': 11 + i}, lambda h: h.args['niter'], 11 + i
    if minimizer is MINPACK:
        v = 0.01 * (i + 1)
        return {'ftol': v}, lambda h: h.args['ftol'], v
    v = 0.0625 * (i + 1)
    return {'tol': v}, lambda h: h.args['tol'], v


def stage_names(stages):
    """Names of the stages: numbered by occurrence from the second on."""
    count, out = {}, []
    for s in stages:
        n = s.__name__
        count[n] = count.get(n, 0) + 1
        out.append(n if count[n] == 1 else '{}_{}'.format(n, count[n]))
    return out


def answer(n, i, run):
    return [round(0.125 * (i + 1) + 0.25 * k - 0.5 * run, 6) for k in range(n)]


def setup(ch, lengths):
    objective = ch.pick('objective', ['minimize', 'least squares', 'vector', 'likelihood'], dev=False)
    forms = ch.pick('model', CASES[objective])
    am0 = gen.AM(forms)
    names = ch.pick('names', [gen.NAMES[1], gen.NAMES[0], gen.NAMES[2], gen.NAMES[3]])
    fx = ch.pick('fixed', [s for s in subsets(am0.abs_params) if len(s) < len(am0.abs_params)])
    kind = ch.pick('class', ['CallableModel', 'Model', 'GradientModel', 'CallableNumericalModel'])
    n = ch.pick('stages', lengths, dev=False)
    pool = [MINPACK] if objective == 'vector' else MINIMIZERS
    if not THOROUGH and n == 3:
        pool = [m for m in pool if m in (BFGS, NelderMead, COBYLA, MINPACK)]
    if objective not in ('minimize', 'vector'):
        pool = [m for m in pool if m in (BFGS, SLSQP, BasinHopping, DifferentialEvolution, NelderMead)]
    stages = [ch.pick('stage', pool, dev=False) for _ in range(n)]
    attrs = {q: dict(min=-50, max=50) for q in am0.abs_params} if (
        DifferentialEvolution in stages) else None
    case = make_case(ch, objective, forms, kind, fx, names, attrs=attrs)
    return case, stages


def make_chain(ch, case, stages, how):
    if how == 'list':
        return make_fit(case, list(stages)), None
    if how == 'tuple':
        return make_fit(case, tuple(stages)), None
    fit = make_fit(case, list(stages))
    obj = fit.objective
    made = [m(obj, case.p.model.params) for m in stages]
    if how == 'instances':
        return make_fit(case, made), made
    chain = ChainedMinimizer(obj, case.p.model.params, minimizers=made)
    return make_fit(case, chain), made


def chain(ch):
    case, stages = setup(ch, [2, 1, 3])
    p = case.p
    n = len(p.free)
    names = stage_names(stages)
    how = ch.pick('given as', ['list', 'tuple', 'instances', 'chain'])
    fit, made = make_chain(ch, case, stages, how)
    runs = ch.pick('executions', [2, 3] if THOROUGH else [2])
    for run in range(runs):
        with_options = ch.pick('options', [None, 'all', 'reversed'] + list(range(len(stages))))
        if with_options is None:
            chosen = []
        elif with_options in ('all', 'reversed'):
            chosen = list(range(len(stages)))
        else:
            chosen = [with_options]
        if with_options == 'reversed':
            chosen = chosen[::-1]
        options = {names[i]: option_of(stages[i], i)[0] for i in chosen}
        if ch.flag('other initial values'):
            for k, q in enumerate(p.am.params):
                p.start[q] = p.start[q] + 0.375 * (k + 1)
                p.syms[q].value = p.attrs[q]['value'] = p.start[q]
        silent = ch.pick('stage that does not move', [None] + list(range(len(stages))))
        answers, nits = [], []
        for i in range(len(stages)):
            answers.append(answers[-1] if i == silent and i else answer(n, i, run))
            nits.append([5, 11, 23, 47][i] + run)
        before = repr(options)
        count = []

        def script(h):
            i = len(count)
            count.append(h)
            if not ch.expect(i < len(stages), 'number of stages', 'stages that are executed',
                             abort=True):
                return
            m = stages[i]
            if m in METHOD:
                ch.equal(h.method, METHOD[m], 'order', 'method of the stage')
            else:
                ch.equal(h.name, {BasinHopping: 'basinhopping', MINPACK: 'least_squares',
                                  DifferentialEvolution: 'differential_evolution'}[m],
                         'order', 'back end of the stage')
            if h.x0 is not None:
                exp = [p.start[q] for q in p.free] if i == 0 else answers[i - 1]
                ch.close(h.x0, np.array(exp, float), 'start', 'starting point of a stage',
                         rtol=0, atol=0, stage=i, run=run)
            _, read, value = option_of(m, i)
            if i in chosen:
                ch.expect(read(h) == value, 'option', 'option of a stage', stage=i, got=repr(read(h)),
                          expected=value)
            for j in range(len(stages)):
                if j != i or i not in chosen:
                    ch.expect(read(h) != option_of(m, j)[2], 'foreign option',
                              'option of another stage', stage=i, other=j)
            g = grid(n)[run % 2]
            ref = case.scalar(g)
            ch.close(np.ravel(h.fun(g)), np.ravel(ref.v), 'function', 'function of a stage', rtol=1e-8,
                     atol=1e-8)
            last = i == len(stages) - 1
            return h.answer(answers[i], message='stage {}'.format(i), nit=nits[i], nfev=NFEV + i)
        ch.op()
        with scripted(lambda name, args: script(handed.Handed(name, args))):
            result = fit.minimizer.execute(**options) if ch.cost and not THOROUGH and (
                how == 'list') else fit.execute(**options)
        ch.equal(repr(options), before, 'options changed', 'the options of the user')
        ch.equal(len(count), len(stages), 'number of stages', 'stages that are executed')
        exp = dict(p.start)
        exp.update(dict(zip(p.free, answers[-1])))
        for q in p.am.params:
            ch.expect(float(result.params[q]) == float(exp[q]), 'result', 'value in the result',
                      parameter=q, got=float(result.params[q]), expected=exp[q])
        total = sum(NFEV + i if m is COBYLA else k for i, (k, m) in enumerate(zip(nits, stages))
                    if m is not MINPACK)
        ch.equal(result.iterations, total, 'iterations', 'total number of iterations')
        ch.equal(result.status_message, 'stage {}'.format(len(stages) - 1), 'message',
                 'message of the last stage')
        last = case.scalar(answers[-1])
        got = result.objective_value
        ch.close(np.ravel(got), np.ravel(last.v), 'objective value', 'objective value of the result',
                 rtol=1e-8, atol=1e-8)
        check_attributes(ch, case)
        ch.obs(case.objective, names, with_options, p.free, answers)


def refused(ch):
    """Names which are not stages are refused before anything is executed."""
    n = ch.pick('stages', [1, 2, 3], dev=False)
    pool = [BFGS, NelderMead] if n == 3 else [BFGS, NelderMead, LBFGSB, BasinHopping, MINPACK]
    stages = [ch.pick('stage', pool, dev=False) for _ in range(n)]
    if MINPACK in stages and len(set(stages)) > 1:
        raise Skip()
    objective = 'vector' if MINPACK in stages else 'minimize'
    case = make_case(ch, objective, CASES[objective][0])
    fit = make_fit(case, stages)
    names = stage_names(stages)
    wrong = sorted((set(m.__name__ + s for m in MINIMIZERS + [MINPACK] for s in
                        ('', '_0', '_1', '_2', '_3', '_4', '2')) |
                    {'tol', 'options', 'minimizer_kwargs', 'bfgs', 'stage'}) - set(names))
    for w in wrong:
        calls = []
        also = {names[-1]: {}}

        def script(name, args):
            calls.append(name)
            h = handed.Handed(name, args)
            return h.answer([0.25] * h.n)
        for extra in ({}, also):
            ch.op()
            with scripted(script):
                ch.raises(TypeError, lambda: fit.minimizer.execute(**dict({w: {}}, **extra)),
                          'unknown name', 'options for {}'.format(w))
        ch.equal(calls, [], 'executed', 'stages executed with a refused name')
    # and the right ones are accepted
    for k in range(1, len(names) + 1):
        for sub in itertools.permutations(names, k):
            calls = []

            def script(name, args):
                h = handed.Handed(name, args)
                calls.append(h)
                return h.answer([0.25] * h.n)
            opts = {s: option_of(stages[names.index(s)], names.index(s))[0] for s in sub}
            ch.op()
            with scripted(script):
                fit.minimizer.execute(**opts)
            for i, (m, h) in enumerate(zip(stages, calls)):
                _, read, value = option_of(m, i)
                ch.expect((read(h) == value) is (names[i] in sub), 'option', 'option of a stage',
                          stage=i, given=sub)
    ch.obs(names)


def nested(ch):
    """A chain as a stage of a chain, and chains which share stages."""
    case = make_case(ch, 'minimize', CASES['minimize'][0], names=gen.NAMES[1],
                     fixed=ch.pick('fixed', [[], ['a'], ['b'], ['c']], dev=False))
    p = case.p
    n = len(p.free)
    pool = [BFGS, NelderMead, SLSQP, COBYLA]
    a, b, c = [ch.pick('stage', pool, dev=False) for _ in range(3)]
    where = ch.pick('chain', ['first', 'last', 'shared'], dev=False)
    probe = make_fit(case, a)
    o, ps = probe.objective, p.model.params
    if where == 'shared':
        shared = a(o, ps)
        seqs = [[shared, b(o, ps)], [c(o, ps), shared]]
        chains = [ChainedMinimizer(o, ps, minimizers=s) for s in seqs]
        plan = [(chains[0], [a, b]), (chains[1], [c, a]), (chains[0], [a, b])]
    else:
        inner = ChainedMinimizer(o, ps, minimizers=[a(o, ps), b(o, ps)])
        outer = [inner, c(o, ps)] if where == 'first' else [c(o, ps), inner]
        flat = [a, b, c] if where == 'first' else [c, a, b]
        plan = [(ChainedMinimizer(o, ps, minimizers=outer), flat)] * 2 + [(inner, [a, b])]
        if where == 'first':
            # executed as first stage, the inner chain was given the guesses of the outer one
            plan = plan[:2]
        else:
            plan = plan[:2]
    for run, (m, flat) in enumerate(plan):
        calls = []

        def script(name, args):
            h = handed.Handed(name, args)
            i = len(calls)
            calls.append(h)
            exp = [p.start[q] for q in p.free] if i == 0 else answer(n, i - 1, run)
            ch.equal(h.method, METHOD[flat[i]], 'order', 'method of the stage')
            ch.close(h.x0, np.array(exp, float), 'start', 'starting point of a stage', rtol=0, atol=0,
                     stage=i, run=run)
            return h.answer(answer(n, i, run), nit=3 + i, nfev=NFEV + i)
        ch.op()
        with scripted(script):
            result = m.execute()
        ch.equal(len(calls), len(flat), 'number of stages', 'stages that are executed')
        ch.equal(result.iterations, sum((NFEV if k is COBYLA else 3) + i for i, k in enumerate(flat)),
                 'iterations', 'total number of iterations')
        for q, v in zip(p.free, answer(n, len(flat) - 1, run)):
            ch.expect(float(result.params[q]) == v, 'result', 'value in the result', parameter=q)
        ch.obs(where, run, [k.__name__ for k in flat], p.free)


def spec(tier):
    global THOROUGH
    THOROUGH = t = tier == 'thorough'
    return {
        'bodies': {
            'chain': {'body': chain, 'bound': 2 if t else 1},
            'refused': {'body': refused, 'bound': 0},
            'nested': {'body': nested, 'bound': 0},
        },
        'budget_s': 100 if not t else 780,
        'rule': 'every sequence of minimizers up to three stages (three stages over a smaller set '
                'in the quick tier), executed repeatedly; within the bound fixed parameters, '
                'names, options per stage, changed initial values and stages that do not move; '
                'every assignment of options to stage names and every unknown name',
        'assumptions': ['the numerical back ends are replaced by ones with chosen answers'],
    }
